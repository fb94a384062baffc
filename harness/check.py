#!/usr/bin/env python3
"""check.py ID            decide property ID (VERIF_TIER, VERIF_SEED)
check.py setup         build everything that can be cached
check.py replay FILE   run one recorded violation again"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build, ctx, run, tlc  # noqa: E402


def main():
    what = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if what == "setup":
        return importlib.import_module("vf.setup").main()
    if what == "replay":
        v = json.load(open(sys.argv[2]))
        if v["kind"] == "replay":
            r = run.replay(v["lang"], [v["behaviour"]], v["engine"], driver=v.get("driver"), procs=1)[0]
            print(json.dumps(run.compare(v["behaviour"], r), indent=1))
        elif v["kind"] == "trace":
            ok, r = tlc.validate(v["module"], v["trace"], **v.get("cfg", {}))
            print(ok, r.out[-2000:])
        return 0
    m = importlib.import_module("vf.checks." + what)
    c = ctx.Ctx(what, tier, seed)
    try:
        m.run(c)
    except build.BuildError as e:
        print("build error:", e)
        return 3
    except tlc.TlcError as e:
        print("specification error:", e)
        return 4
    except Exception:
        traceback.print_exc()
        return 5
    return c.finish(getattr(m, "LEVEL", "model_checking"))


if __name__ == "__main__":
    sys.exit(main())
