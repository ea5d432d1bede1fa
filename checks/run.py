#!/usr/bin/env python3
"""checks/run.py <property> : decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import evid, vlib, registry


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    for a in sys.argv[2:]:
        if a in ("--quick", "--thorough"):
            tier = a[2:]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rep = evid.Report(prop, tier, seed, registry.LEVEL.get(prop, "model_checking"))
    work = vlib.Work(prop)
    try:
        registry.run(rep, work, prop, tier, seed)
        return rep.finish()
    except vlib.CheckError as e:
        print("ERROR of the check: %s" % e)
        rep.finish()
        return 1 if rep.violations else 2
    except Exception:
        traceback.print_exc()
        return 1 if rep.violations else 2
    finally:
        work.close()


if __name__ == "__main__":
    sys.exit(main())
