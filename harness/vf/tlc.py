"""Running TLC: exhaustive checking, behaviour generation, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(build.VERIF, "spec")


class TlcError(Exception):
    pass


def brief(out):
    i = out.find("Error:")
    return out[:300] if i < 0 else out[i:i + 1500]


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:
            m = re.search(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = int(m.group(1))
        self.ok = rc == 0
        self.violated = "is violated" in out or "Error: Action property" in out or "was violated" in out or "PostCondition" in out or "Deadlock reached" in out


def _run(argv, env, cwd, timeout):
    p = subprocess.run(argv, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, errors="replace")
    out = "\n".join(x for x in p.stdout.split("\n") if not x.startswith(("Parsing file", "Semantic processing")))
    return p.returncode, out


def run(module, cfg, args=(), env=None, timeout=600, heap="3g", jvm=(), workers=None):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix="vf-tlc-")
    try:
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e["TMPDIR"] = d
        argv = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
                "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC]
        argv += list(jvm)
        argv += ["-cp", JAR, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                 "-config", os.path.join(d, "M.cfg")]
        if workers:
            argv += ["-workers", str(workers)]
        argv += list(args) + [os.path.join(SPEC, module + ".tla")]
        rc, out = _run(argv, e, d, timeout)
        return Result(out, rc)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg_text(init="Init", next_="Next", spec=None, invariants=(), properties=(), constants=None, constraint=None,
             view=None, postcondition=None, deadlock=False, action_constraint=None, symmetry=None):
    r = []
    if spec:
        r.append("SPECIFICATION " + spec)
    else:
        r += ["INIT " + init, "NEXT " + next_]
    for i in invariants:
        r.append("INVARIANT " + i)
    for i in properties:
        r.append("PROPERTY " + i)
    for k, v in (constants or {}).items():
        r.append("CONSTANT %s %s %s" % (k, "<-" if isinstance(v, str) and v.startswith("@") else "=", tla(v)))
    if constraint:
        r.append("CONSTRAINT " + constraint)
    if action_constraint:
        r.append("ACTION_CONSTRAINT " + action_constraint)
    if view:
        r.append("VIEW " + view)
    if symmetry:
        r.append("SYMMETRY " + symmetry)
    if postcondition:
        r.append("POSTCONDITION " + postcondition)
    r.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(r) + "\n"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        if v.startswith("@"):
            return v[1:]
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise ValueError(v)


def check(module, timeout=600, workers=4, env=None, heap="4g", **cfg):
    """Exhaustive check; returns Result, raises TlcError on anything but success."""
    r = run(module, cfg_text(**cfg), env=env, timeout=timeout, workers=workers, heap=heap)
    if not r.ok:
        raise TlcError("TLC on %s failed (rc %d):\n%s" % (module, r.rc, brief(r.out)))
    return r


def generate(module, num, depth, seed, procs=4, timeout=600, env=None, heap="2g", emit="Emit", **cfg):
    """Random behaviours of the specification: a list of decoded JSON values.

    The module appends ToJson(behaviour) to IOEnv.OUT in its Emit invariant."""
    inv = list(cfg.pop("invariants", ())) + [emit]
    text = cfg_text(invariants=inv, **cfg)
    d = tempfile.mkdtemp(prefix="vf-gen-")

    def one(i):
        n = num // procs + (1 if i < num % procs else 0)
        if n == 0:
            return None
        e = dict(env or {})
        e["OUT"] = os.path.join(d, "out%d" % i)
        return run(module, text, ["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed * 1000 + i + 1)],
                   env=e, timeout=timeout, heap=heap, workers=1)

    try:
        with ThreadPoolExecutor(procs) as ex:
            rs = [r for r in ex.map(one, range(procs)) if r is not None]
        seen, res = set(), []
        for r in rs:
            if r.rc != 0:
                raise TlcError("TLC -simulate on %s failed (rc %d):\n%s" % (module, r.rc, brief(r.out)))
        for i in range(procs):
            p = os.path.join(d, "out%d" % i)
            if os.path.exists(p):
                for line in open(p, encoding="utf-8"):
                    line = line.rstrip("\n")
                    if line and line not in seen:
                        seen.add(line)
                        res.append(json.loads(json.loads(line)))
        if not res:
            raise TlcError("TLC -simulate on %s produced no behaviour:\n%s" % (module, brief(rs[0].out)))
        return res, sum(r.generated for r in rs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def enumerate_(module, timeout=600, workers=1, env=None, heap="4g", **cfg):
    """Exhaustive exploration that also emits every behaviour/case via Emit."""
    d = tempfile.mkdtemp(prefix="vf-enum-")
    try:
        e = dict(env or {})
        e["OUT"] = os.path.join(d, "out")
        inv = list(cfg.pop("invariants", ())) + ["Emit"]
        r = run(module, cfg_text(invariants=inv, **cfg), env=e, timeout=timeout, workers=workers, heap=heap)
        if not r.ok:
            raise TlcError("TLC on %s failed (rc %d):\n%s" % (module, r.rc, brief(r.out)))
        seen, res = set(), []
        if os.path.exists(e["OUT"]):
            for line in open(e["OUT"], encoding="utf-8"):
                line = line.rstrip("\n")
                if line and line not in seen:
                    seen.add(line)
                    res.append(json.loads(json.loads(line)))
        return res, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, trace, timeout=300, heap="2g", **cfg):
    """Check a recorded trace (list of records) against a Trace specification.

    Returns (accepted, Result).  Every record is one line of IOEnv.TRACE."""
    d = tempfile.mkdtemp(prefix="vf-tr-")
    try:
        p = os.path.join(d, "trace.ndjson")
        with open(p, "w") as f:
            for t in trace:
                f.write(json.dumps(t) + "\n")
        r = run(module, cfg_text(**cfg), env={"TRACE": p}, timeout=timeout, heap=heap, workers=1)
        return r.ok, r
    finally:
        shutil.rmtree(d, ignore_errors=True)
