import hashlib
import json
import os
import sys
import time

from . import build, run, tlc


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier != "thorough"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.evals = 0
        self.distinct = set()
        self.nontrivial = 0
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = [k for k in load_known() if k["property"] == pid]
        self.phases = {}

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # -- specification
    def check(self, module, **kw):
        r = tlc.check(module, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("model_checked", []).append({"module": module, "distinct": r.distinct, "generated": r.generated})
        self.log("TLC", module, r.distinct, "distinct states,", r.generated, "generated")
        return r

    def generate(self, module, num, depth, **kw):
        kw.setdefault("seed", self.seed)
        b, n = tlc.generate(module, num, depth, **kw)
        self.transitions += n
        self.extra.setdefault("generated", []).append({"module": module, "behaviours": len(b), "spec_states": n})
        self.log("TLC", module, len(b), "behaviours,", n, "states")
        return b

    def enumerate(self, module, **kw):
        b, r = tlc.enumerate_(module, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("enumerated", []).append({"module": module, "cases": len(b), "distinct": r.distinct})
        self.log("TLC", module, len(b), "cases enumerated,", r.distinct, "distinct states")
        return b

    # -- conformance
    def replay(self, lang, behs, engine="real", driver=None, known=None, timeout=300, procs=8, post=None):
        """Replay and compare; records violations (confirmed by a second run)."""
        res = run.replay(lang, behs, engine, driver=driver, timeout=timeout, procs=procs)
        bad = 0
        again = None
        for b, r in zip(behs, res):
            self.traces += 1
            self.evals += len(b)
            d = run.compare(b, r, post)
            if d is None:
                continue
            bad += 1
            if os.environ.get("VERIF_DEBUG"):
                self.log("DIFF", d.get("step"), d.get("why") or json.dumps(d)[:500])
            if bad > 3:
                continue
            r2 = run.replay(lang, [b], engine, driver=driver, timeout=timeout, procs=1)[0]
            d2 = run.compare(b, r2, post)
            if d2 is None:
                # depends on what ran before it in the same process: run the whole batch again before deciding
                if again is None:
                    again = run.replay(lang, behs, engine, driver=driver, timeout=timeout, procs=procs)
                d2 = run.compare(b, again[behs.index(b)], post)
                if d2 is None:
                    self.extra["unconfirmed"] = self.extra.get("unconfirmed", 0) + 1
                    self.log("not reproduced:", json.dumps(d)[:600])
                    continue
            self.violation({"kind": "replay", "lang": lang, "engine": engine, "driver": driver, "behaviour": b, "difference": d2})
        if behs and len(self.samples) < 3:
            self.samples.append({"lang": lang, "behaviour": _short(behs[0])})
        for b in behs:
            self.distinct.add(hashlib.sha1(json.dumps(b, sort_keys=True).encode()).hexdigest())
        self.log("replayed", len(behs), "behaviours in", lang, "on", engine, "-", bad, "differences")
        return bad

    def validate(self, module, traces, what="trace", **kw):
        for i, t in enumerate(traces):
            ok, r = tlc.validate(module, t, **kw)
            self.traces += 1
            self.transitions += r.generated
            if not ok:
                self.violation({"kind": "trace", "module": module, "trace": t, "tlc": r.out[-3000:], "what": what})

    def violation(self, rep):
        k = self._known(rep)
        if k:
            if k not in self.known_hit:
                self.known_hit.append(k)
            return
        self.violations.append(rep)

    def _known(self, rep):
        txt = json.dumps(rep, sort_keys=True)
        for k in self.known:
            if k.get("match") and all(m in txt for m in k["match"]):
                return k
        return None

    def finish(self, level):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
               "rule": "a case is one behaviour of the specification replayed into (or recorded from) the real code; distinct by content"}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.pid, self.traces, self.states, time.time() - self.t0))
            return 0
        d = os.path.join(build.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(self.violations[:5]):
            p = os.path.join(d, "%s-%d.json" % (self.pid, i))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            f = v.get("difference")
            if f and f.get("why"):
                print("--- step %s %s (%s, %s engine): %s" % (f["step"], json.dumps(f["op"])[:300], v["lang"], v["engine"], f["why"][:600]))
            else:
                print("--- " + json.dumps(f or {k: x for k, x in v.items() if k not in ("trace", "behaviour")})[:2000])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1


def _short(b):
    s = json.dumps(b)
    return json.loads(s) if len(s) < 3000 else s[:3000]


def load_known():
    p = os.path.join(build.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])
