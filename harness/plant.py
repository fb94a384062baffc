#!/usr/bin/env python3
"""plant.py ID [--tests]: with a change in /repo's working tree and /verif/seeded/ID/{demo.sh,meta.json} written,
saves the change as patch.diff and confirms it: tests pass, demo fails with and passes without it, and says
whether the property's check notices.  plant.py --again ID... applies saved patches and runs the checks."""
import json
import os
import subprocess
import sys

V = "/verif/seeded/"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"])


def check(pid):
    r = sh("VERIF_SEED=1 VERIF_TIER=quick python3 /verif/harness/check.py " + pid)
    v = [l for l in r.stdout.splitlines() if l.startswith("---") or l.startswith("VIOLATION")]
    return r.returncode, v, r.stdout


def main():
    if sys.argv[1] == "--again":
        ids = sys.argv[2:] or sorted(os.listdir(V))
        for i in ids:
            m = json.load(open(V + i + "/meta.json"))
            a = sh("git -C /repo apply %s%s/patch.diff" % (V, i))
            if a.returncode:
                print(i, "does not apply", a.stdout)
                continue
            try:
                rc, v, _ = check(m["property"])
            finally:
                sh("git -C /repo checkout -- .")
            print("%-28s %s %s" % (i, m["property"], "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc), flush=True)
            for l in v[:1]:
                print("     ", l[:300])
        return
    i = sys.argv[1]
    d = V + i
    m = json.load(open(d + "/meta.json"))
    diff = sh("git -C /repo diff").stdout
    if diff:
        open(d + "/patch.diff", "w").write(diff)
    else:
        sh("git -C /repo apply %s/patch.diff" % d)
    ok = True
    try:
        r = sh("bash /opt/vp/test.sh /tmp/plant.json")
        if not os.path.exists("/tmp/plant.json"):
            print(r.stdout[-2000:])
        p = set(json.load(open("/tmp/plant.json"))["passed"])
        miss = baseline() - p
        print("tests:", "pass" if not miss else "BROKEN %s %s" % (sorted(miss)[:5], r.stdout[-1500:] if not p else ""))
        ok &= not miss
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        print("demo with the change:", r.returncode, r.stdout[-300:].strip().replace("\n", " | "))
        ok &= r.returncode != 0
        rc, v, out = check(m["property"])
        print("check:", "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, (v[:1] or [out[-300:]])[0][:400])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    print("demo without:", r.returncode, r.stdout[-300:].strip())
    ok &= r.returncode == 0
    print("KEEP" if ok else "NOT VALID")


main()
