"""C07: what propagators see."""
import json
import os
import re
import tempfile
from collections import Counter

from vf import run as R
from vf import tlc

LEVEL = "model_checking"
NOTE = ("Trail.tla draws searches (programs, watch sets, check modes, threads, decisions, clauses and watches added on the way, assumptions, several solve calls); they are run "
        "with recording propagators in Python, C++ and Lua, and TrailTrace.tla - the stack of reported changes per thread, the watches, the pending decision, and the "
        "conditions under which a snapshot is one partial assignment - is checked by TLC against every recorded callback sequence.")
TECHNIQUE = "trace validation: TLC checks recorded callback sequences of the real code against a TLA+ trace specification"


def run(c):
    for lang in ("py", "lua"):
        c.replay(lang, c.enumerate("PropSub", constants={"Depth": c.pick(1, 2)}), engine="real")
    n = c.pick(90, 1200)
    for part in range(c.pick(1, 4)):
        recs = []
        for lang in ("py", "cc", "lua"):
            behs = c.generate("Trail", n, 8, procs=4, seed=c.seed + 100 * part, constants={"Lang": lang, "Solves": 2})
            for b, r in zip(behs, R.replay(lang, behs, "real")):
                c.traces += 1
                c.distinct.add(json.dumps(b))
                if "died" in r or any(isinstance(o, dict) and ("exc" in o or "died" in o) for o in r.get("obs", [])):
                    c.violation({"kind": "run", "lang": lang, "behaviour": b, "difference": r if "died" in r else [o for o in r["obs"] if isinstance(o, dict) and "exc" in o]})
                    continue
                for k, t in enumerate(r["obs"][-2]):
                    recs.append((lang, b, k, t["ev"]))
                    c.evals += len(t["ev"])
        c.extra.setdefault("events", Counter()).update(e["ev"] for x in recs for e in x[3])
        c.samples.append({"lang": recs[0][0], "trace": recs[0][3][:3]})
        d = tempfile.mkdtemp(prefix="vf-c07-")
        p = os.path.join(d, "t.ndjson")
        with open(p, "w") as f:
            f.write("".join(json.dumps({"ev": x[3]}) + "\n" for x in recs))
        try:
            r = tlc.run("TrailTrace", tlc.cfg_text(invariants=["Fine"]), env={"TRACE": p, "STRICT": "0"}, workers=8, heap="8g", timeout=3000)
        finally:
            os.remove(p)
            os.rmdir(d)
        if r.rc != 0:
            raise tlc.TlcError("TrailTrace: " + tlc.brief(r.out))
        c.states += r.distinct
        c.transitions += r.generated
        bad = re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', r.out, re.S)
        c.log("validated", len(recs), "traces,", sum(len(x[3]) for x in recs), "events,", len(bad), "rejected")
        if not bad and r.generated < sum(len(x[3]) for x in recs):
            raise tlc.TlcError("traces not read to the end")
        for t, i, why in bad[:5]:
            lang, b, k, ev = recs[int(t) - 1]
            c.violation({"kind": "trace", "lang": lang, "module": "TrailTrace", "what": why, "scenario": b, "propagator": k, "trace": ev[max(0, int(i) - 10):int(i)],
                         "difference": {"rejected": why, "lang": lang, "event": i}})
